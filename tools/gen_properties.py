#!/usr/bin/env python3
# Writes properties.jsonl (one property per line) from the table below.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                   **({'observe_at':observe} if observe else {}), hook_needed=hook)))
K='include/dsp/kalman.hpp'; MX='include/num/matrix.hpp'; FP='include/num/fixed-point.hpp'
BQ='include/dsp/biquad.hpp'; BC='include/dsp/biquad-cascade.hpp'; OP='include/dsp/onepole.hpp'
RG='include/mcu/register.hpp'; AT='include/mcu/atmega328.hpp'

# ---------------------------------------------------------------- estimator
p('E01','Estimator follows the predict/correct recursion over any history',
 'After any sequence of updates, the state estimate, error covariance, gain and elapsed time that an estimator with symmetric covariances reports are those of the textbook Kalman recursion (predict with dynamics and control, then correct with the gain formed from the predicted covariance) applied to the same controls and measurements in the same order, whatever dropped, repeated, stale or wildly wrong readings the sequence contains. A scalar innovation covariance of zero gives a zero gain, so the prediction stands. Reading results never changes later results.',
 ['histories','fault_sequences','inputs'],
 'every configuration (2 states, 1-2 measurements, 1-2 controls), every sequence of updates with sensor/control faults, every placement of observer calls, one update or tens of thousands',
 'The unit tests never run the estimator at all (it is only compiled by an example); a test could only sample one trajectory, while the guarantee is over every history of controls, measurements and sensor faults.',
 [K,MX],[('kalman::update','include/dsp/kalman.hpp:68'),('matrix products, transposition, inversion','include/num/matrix.hpp:330')],
 [('xhat','state estimate',K),('P','estimate error covariance',K),('K','gain of the last update',K),('t','elapsed time',K)],
 ['system_state()','estimation_error_covariance()','kalman_gain()','time()'])
p('E02','Estimator restarted from its published state continues identically',
 'An estimator constructed from the last reported state estimate and error covariance of another (same model, same time step) produces, from then on, the same estimates, covariances, gains and elapsed-time increments as the original would have for the same inputs, at whatever point of whatever history the original was lost, including in the middle of an update. No information outside those published values influences later results.',
 ['crash_points','histories','fault_sequences'],
 'every history, every crash point (between updates or at any arithmetic step inside one), every choice of checkpoint age with the inputs since replayed, torn newest checkpoint included',
 'Existing tests do not exercise the estimator; crash points inside an update cannot be reached by any unit test.',
 [K],[('constructor taking initial covariance and state','include/dsp/kalman.hpp:43'),('observers by value','include/dsp/kalman.hpp:97')],
 [('xhat,P','the complete recursive state',K)],['system_state()','estimation_error_covariance()'])
p('E03','Estimator stays healthy and recovers once sensor faults stop',
 'With symmetric positive (semi)definite covariances and a detectable model, for any finite readings (dropouts, stuck, stale, spiked, duplicated), the covariance stays symmetric, positive semidefinite and finite, never grows in the correction step, and together with the gain depends only on the number of updates, not on the readings. Once readings are faithful again the estimation error contracts to below a set fraction of its value within the number of updates that the model itself implies.',
 ['fault_sequences','histories','configurations'],
 'every stable or integrating two-state model with positive measurement noise, every finite sensor-fault sequence followed by a fault-free suffix',
 'Invariants over an unbounded history and a bounded-progress claim after faults; no test runs more than zero updates.',
 [K,MX],[('covariance update from the gain, independent of the readings','include/dsp/kalman.hpp:82')],
 [('P','error covariance',K),('xhat','estimate',K)],['estimation_error_covariance()','kalman_gain()','system_state()'])
p('E04','Fixed-point estimators and filters track their real-valued twins',
 'An estimator, filter section or one-pole filter instantiated on a fixed-point type whose intermediate values stay inside the type\'s range stays, over any stream of in-range inputs including sensor faults, within a small multiple of its resolution, amplified by that computation\'s own gains, of the same object computed in real arithmetic. It never wraps, drifts away or sticks while the real-valued values remain in range.',
 ['histories','fault_sequences','inputs'],
 'every in-range model and in-range input history (16-bit and 32-bit representations), with bursts, steps, dropouts and full-scale swings',
 'Tests check single fixed-point operations on a handful of constants; they never accumulate rounding over a feedback history.',
 [FP,K,BQ,OP],[('promotion before multiply/divide','include/num/fixed-point.hpp:165'),('rounding construction','include/num/fixed-point.hpp:100')],
 [('storage','scaled integer value',FP)],['as_double()','step()','system_state()'])
p('E05','Estimators and filters share nothing under preemption',
 'When computations on distinct estimators, filter sections, one-pole filters or cascades are interleaved or nested at arbitrary points (tasks preempted or interrupted mid-update, or killed there), every object yields exactly the results it yields when it runs alone. There is no hidden state shared between objects, and none outlives an object.',
 ['schedules','fault_sequences','crash_points'],
 'every interleaving at arithmetic-operation granularity of 2-4 tasks, interrupt-style nesting, tasks aborted at any operation, objects created and destroyed while others are mid-update',
 'Unit tests are single-threaded and sequential; hidden shared scratch storage passes all of them.',
 [K,MX,BQ,BC,OP],[('all state in the object or on the stack','include/dsp/kalman.hpp:118'),('all state in the object','include/dsp/biquad.hpp:330')],
 None,['system_state()','step() results'])
p('E06','On target, estimator and filters match the desktop under interrupts',
 'Built for the microcontroller, the estimator and the filter sections (floating point and fixed point) give the same output stream as the desktop build for the same inputs, to within single-precision rounding, no matter where interrupt handlers that run other estimators or filters preempt the computation. The handlers\' own streams are likewise unaffected.',
 ['schedules','histories','inputs'],
 'every placement of interrupts at instruction granularity, every input history',
 'The target build is only compiled, never executed; its replacement standard-library pieces (fill, copy, swap, limits) are not exercised by any test.',
 [K,MX,BQ,FP,OP,'include/std/algorithm.hpp','include/std/utility.hpp','include/std/limits.hpp'],
 [('constructors zero-initialise on target','include/num/matrix.hpp:60'),('fill/copy/swap for target','include/std/algorithm.hpp:20')],
 None,['result bytes stored by the firmware'])

p('E07','Every update and step takes bounded time and stack and never allocates',
 'Once an estimator, filter section, one-pole filter or cascade exists, none of its operations (update, step, reset, reconfiguration, reading of results), nor fixed-point or matrix arithmetic, ever allocates memory, and none takes longer or needs more stack than a fixed bound, about what the same operation takes for ordinary values: whatever readings it is given (NaN, infinite, overflowing, denormal, stuck), and however long its history is. An update that fits its sampling period and the stack once therefore always does.',
 ['inputs','histories','fault_sequences'],
 'all readings including non-finite and denormal ones, all histories up to tens of thousands of operations, all object shapes, memory exhausted at every operation',
 'Tests look at results only; cost on the target is never observed.',
 [K,MX,BQ,BC,OP,FP],[('update without loops over history','include/dsp/kalman.hpp:60'),('sections held in an array of fixed capacity','include/dsp/biquad-cascade.hpp:60')],
 None,['cycles and stack pointer of the simulated target','arithmetic operations and allocations on the desktop'])

p('E08','Matrix programs compute what the algebra says, at every step',
 'In any program of matrix and vector operations of the supported shapes (sums, differences, products, operations with numbers and 1x1 matrices, transposes, inverses of symmetric matrices, copies, element access and iteration) each result equals its mathematical definition, whatever the values and however operands alias or came about. An invertible matrix times its inverse is the identity. Nothing but the value assigned changes, also when other tasks preempt the program inside an operation.',
 ['histories','schedules','inputs'],
 'every program of operations, all values, aliasing of operands and result, every interleaving of several such programs',
 'Tests apply each operation once to one constant operand.',
 [MX],[('operators','include/num/matrix.hpp:160'),('transposed','include/num/matrix.hpp:438'),('inverted','include/num/matrix.hpp:476'),('element access','include/num/matrix.hpp:95')],
 None,['operator+','operator-','operator*','transposed()','inverted()','eye()','at()'])
p('E09','Fixed-point numbers are exact or within one step through any history',
 'As long as exact results stay within the range of the format, fixed-point construction from reals gives a nearest step and from integers the exact value, sums, differences and negation are exact, products and quotients are less than one step off, comparisons order as the reals do, and conversion back gives the value (integers truncated towards zero), whatever operations, plain or compound, produced the operands. It holds for 8-, 16- and 32-bit formats, on the desktop and on the microcontroller, also while interrupt handlers compute with fixed-point numbers too.',
 ['histories','schedules','inputs'],
 'every format, operand and history of operations; on the target every instruction at which a handler may interrupt',
 'Tests check a handful of constants in one or two formats, on the desktop only.',
 [FP],[('construction','include/num/fixed-point.hpp:110'),('arithmetic','include/num/fixed-point.hpp:155'),('comparison','include/num/fixed-point.hpp:200'),('as()','include/num/fixed-point.hpp:143'),('conversion','include/num/fixed-point.hpp:235')],
 None,['fixed_point()','operator+','operator-','operator*','operator/','operator<','as()'])

# ---------------------------------------------------------------- filters
p('F01','Filter streams obey their difference equation over any history',
 'For any coefficients and any input history (dropped, repeated, spiked, stuck samples included), the output stream of a biquad section stepped in either direct-form-2 variant, of a one-pole section, and of a cascade (the sections applied in order) equals the difference equation its coefficients define, starting from rest. Stepping never alters the coefficients, and reading coefficients, state, poles, stability or response never alters the stream.',
 ['histories','fault_sequences','inputs'],
 'all coefficients, all input histories from one to tens of thousands of samples, all placements of observer calls, all section counts up to the capacity',
 'Tests check a few samples of a few fixed filters; the one-pole section is never run.',
 [BQ,OP,BC],[('step_df2 / step_df2_transposed','include/dsp/biquad.hpp:228'),('one-pole step','include/dsp/onepole.hpp:214'),('cascade step','include/dsp/biquad-cascade.hpp:185')],
 [('v1,v2','section delay line',BQ)],['step()','coeff_a()','coeff_b()'])
p('F02','Reset erases all history, whatever fault preceded it',
 'After a reset, a section, one-pole filter or whole cascade behaves exactly like a freshly constructed one with the same coefficients, for every later input and every preceding history, including NaN, infinite or overflowing samples and steps aborted part-way. A faulted filter never needs anything but a reset to recover.',
 ['fault_sequences','histories','crash_points'],
 'every preceding history and fault (NaN, infinity, overflow, denormal, aborted step), every later input stream, every mix of stepping forms',
 'Tests reset once after benign input; recovery from poisoned or half-updated state is not reachable there.',
 [BQ,OP,BC],[('reset','include/dsp/biquad.hpp:214'),('cascade reset over all sections','include/dsp/biquad-cascade.hpp:172')],
 [('v1,v2','section delay line',BQ)],['step() after reset'])
p('F03','A cascade survives live reconfiguration without disturbing other sections',
 'Under any sequence of append, insert, remove, replace, clear, reset, copy and step within capacity, a cascade behaves as an ordered list of sections: size, order, coefficients and every untouched section\'s running state are preserved, replace hands back the displaced section with its running state, and outputs equal those of the list model. It never reads or writes outside its capacity.',
 ['histories','fault_sequences','configurations'],
 'every history of reconfiguration and samples for capacities 1-8, including checkpoints (copies) restored after a fault and full/empty boundaries',
 'Tests do one edit on an idle two- or three-section cascade; state preservation while running, capacity boundaries and long edit histories are not covered.',
 [BC],[('append/insert/remove/replace','include/dsp/biquad-cascade.hpp:84'),('swap of coefficients and state','include/dsp/biquad.hpp:262')],
 [('next','number of sections in use',BC),('biquad[N]','sections with running state',BC)],['size()','coeff_a/b()','state()','step()','begin()/end()'])
p('F04','Designed filters stay bounded under faults and settle to design gain',
 'Every filter produced by the design functions (Chebyshev 1 and 2 low/high pass cascades, one-pole low/high pass, biquad low/high/band pass, band stop, shelves and peaking, and the ready-made low/high-pass filters) answers any finite input burst with finite bounded output and, once the burst is over, settles within the time its slowest pole implies to the input times the designed gain. Designed gain means: the textbook response of the requested type at DC, Nyquist and in-band tones, pass band within the requested ripple and stop band at or below the requested attenuation.',
 ['configurations','fault_sequences','histories'],
 'every admissible design request, every finite fault burst followed by a constant, alternating or tone input',
 'Design headers are only compiled (one of them could not even be included); nothing runs a designed filter on a stream.',
 ['include/dsp/chebyshev-design.hpp','include/dsp/onepole-design.hpp','include/dsp/biquad-design.hpp','include/dsp/filter-design.hpp','include/dsp/filter.hpp'],
 [('chebyshev1_lp_hp / chebyshev2_lp_hp','include/dsp/chebyshev-design.hpp:100'),('onepole_design','include/dsp/onepole-design.hpp:70'),('biquad_design','include/dsp/biquad-design.hpp:280')],
 None,['step() on the resulting filters'])
p('F05','Snapshots and exchanges of running objects are exact and independent',
 'A copy of a running estimator, section, one-pole filter or cascade taken at any moment continues exactly as the original would, and neither ever influences the other; swapping two running sections exchanges their entire behaviour and nothing else. Restoring a section or cascade from a snapshot after a fault therefore resumes as if the fault had not happened.',
 ['histories','crash_points','fault_sequences'],
 'every snapshot, swap and restore point in every history, with faults (aborted steps, poisoned samples) between snapshot and restore',
 'Tests swap and copy idle objects; equality of all later behaviour after a mid-stream snapshot is not sampled.',
 [BQ,OP,BC,K],[('swap','include/dsp/biquad.hpp:262'),('value semantics','include/dsp/biquad-cascade.hpp:24')],
 None,['step()','system_state()'])

p('F06','What a filter reports about itself is what it does to signals',
 'Once disturbances stop and transients have died away, a tone leaves a stable section, one-pole filter or cascade multiplied by the response reported for its frequency, in size and phase; input that follows the reported zeros is cancelled, and what remains without input follows the reported poles; a filter is reported stable exactly when what a burst leaves behind does not grow. A biquad section constructed from zeros, poles and gain is the filter they describe and reports them back. The reports hold in any state and do not change while the filter runs.',
 ['histories','inputs','fault_sequences'],
 'every coefficient set, frequency and input history, with dropped, repeated, spiked and lost samples before the tone settles',
 'Tests compare single values of the reports with constants and never with a running filter.',
 [BQ,OP,BC],[('poles, zeros, is_stable','include/dsp/biquad.hpp:205'),('response','include/dsp/biquad.hpp:330'),('construction from zeros, poles, gain','include/dsp/biquad.hpp:187'),('cascade is_stable, response','include/dsp/biquad-cascade.hpp:150'),('one-pole reports','include/dsp/onepole.hpp:195')],
 None,['step()','response()','poles()','zeros()','is_stable()'])

# ---------------------------------------------------------------- microcontroller
p('M01','Atomic access never tears a multi-byte value shared with an interrupt',
 'A multi-byte value read or written through the atomic access functions is never observed torn by the other side, whether that is an interrupt handler or the main program, and 16-bit hardware registers written that way always receive exactly the value given. Interrupts pending meanwhile are served as soon as the access ends, interrupts are enabled again afterwards, and none is lost.',
 ['schedules'],
 'every instruction boundary at which an interrupt can arrive, 2-, 4- and 8-byte values, both directions, plain variables and 16-bit timer registers sharing a temporary byte',
 'The register layer is only compiled, never executed; tearing needs an interrupt between two particular instructions.',
 [RG,AT],[('atomic(value), atomic(dest,value), scoped_interrupt_guard','include/mcu/register.hpp:525')],
 None,['values logged by both contexts','simulated OCR1A'])
p('M02','Register field access touches only its field, whatever interrupts strike',
 'Reading a field returns exactly its bits; writing, setting, clearing or toggling a field changes exactly its bits and leaves every other bit of the register unchanged, with one store. Setting or clearing a single constant bit of a bit-addressable I/O register never loses a concurrent change of another bit made by an interrupt handler.',
 ['schedules','inputs','configurations'],
 'every field shape (single bit, multi-bit, whole, 8 and 16 bit) at every position, every prior register content, every interrupt placement',
 'Register access is only compiled; a lost update needs an interrupt between load and store.',
 [RG,AT],[('bitfield_t read/write/set/clear/toggle','include/mcu/register.hpp:392'),('led and gpio pins','include/mcu/atmega328.hpp:2590')],
 None,['simulated register contents','store trace'])
p('M03','Combined configuration writes commit once, together and exactly',
 'Field settings combined in one expression reach the hardware register as exactly one store carrying all the new field values, with all other bits unchanged; a setting used on its own reaches it exactly once. The hardware therefore never runs, and an interrupt handler never sees, a half-applied combination within one register, wherever interrupts strike.',
 ['schedules','configurations','inputs'],
 'every combination of 1-4 settings of one register, every prior register content, every interrupt placement',
 'Nothing executes the deferred-write mechanism; a dropped, doubled or early commit compiles silently.',
 [RG,AT],[('write_proxy destructor commit and discard','include/mcu/register.hpp:296'),('operator,','include/mcu/register.hpp:325')],
 [('apply','whether the deferred write is still pending',RG)],['store trace on the simulated bus'])
p('M04','Clearing an event flag clears that flag only, and no event is lost',
 'Clearing a timer or external-interrupt event flag clears exactly that flag; other pending flags of the same register, whenever they arrive, stay pending until they are served or cleared. An event that arrives after the clear is reported.',
 ['schedules','histories'],
 'every arrival time of other events relative to the clear, all flags of the timer 0, timer 1, external and pin-change flag registers',
 'Requires a hardware event between particular instructions; the code is only compiled.',
 [RG,AT],[('write-1-to-clear access','include/mcu/register.hpp:196'),('flag functions','include/mcu/atmega328.hpp:1070')],
 None,['simulated flag registers','event accounting'])
p('M05','Two-wire writes deliver the byte exactly once or report an error, and recover',
 'A synchronous two-wire write that reports success has put start, the given address, the given byte and stop on the bus exactly once, in that order; if the device refuses the address or the data, or arbitration is lost, it reports an error and no success is ever reported for an undelivered byte. Whatever failed before, once faults stop the next write succeeds; initialisation, also when repeated, leaves the interface enabled at the requested bit rate with pull-ups on.',
 ['fault_sequences','histories'],
 'every sequence of writes to every address with refused addresses, refused data, lost arbitration, slow (clock-stretching) devices and re-initialisation at any point between writes',
 'The driver is never executed: there is no bus in the test environment.',
 [AT],[('sync write','include/mcu/atmega328.hpp:2005'),('init','include/mcu/atmega328.hpp:1953')],
 [('TWCR/TWSR/TWDR','two-wire controller state','hardware')],['simulated bus transcript','return value'])
p('M06','Converter results are never torn or mixed between conversions',
 'A conversion result read through the library is always one whole conversion\'s value, never a mixture of two, although conversions complete at arbitrary instants; right- and left-adjusted reads follow the selected adjustment and the selected channel and reference are the ones converted. Starting a conversion or changing channel never disturbs other converter settings.',
 ['schedules','fault_sequences','histories'],
 'every completion time of a free-running or triggered converter relative to the reading instructions, jittered conversion times, every channel/adjustment history',
 'Needs a conversion to complete between two byte reads; no test executes this code.',
 [AT,RG],[('conversion::result 16-bit read, low byte first','include/mcu/atmega328.hpp:2330')],
 None,['values logged by firmware against the simulated converter'])
p('M07','The sampling firmware mirrors every sample to its output, forever',
 'The shipped sampling firmware and loops of the same shape (timer tick, conversion start, conversion-complete interrupt, output write) emit only values that were really sampled, keep emitting at the tick rate with no conversion or tick missed, and never lock up, for every input signal and interrupt timing within the hardware\'s tolerance. Start-up reaches that state from every reset.',
 ['schedules','fault_sequences','crash_points'],
 'every phase relation of timer, converter and pin events, the phase of the converter\'s clock, resets at arbitrary instants',
 'Firmware is linked but never run.',
 [AT,RG],[('tc0/tc1/adc setup and flags','include/mcu/atmega328.hpp:800'),('PWM output','include/mcu/atmega328.hpp:2605')],
 None,['simulated pins, OCR1A, ADC trace'])
p('M08','Settings reach the documented hardware bits and read back as set',
 'Every library setting (timer clocks, waveforms, output modes, compare values, interrupt enables, external and pin-change interrupts, converter, comparator, two-wire, prescaler sync, EEPROM mode, LED and pins) puts the value given into the bits the datasheet assigns to it and changes no other setting; reading it back returns the last value set, after any history of other settings. Force-compare and flag functions act on the addressed unit only.',
 ['histories','configurations'],
 'every setting and value in every order, interleaved with all other settings, from every prior register content',
 'The register map is only compiled; wrong address, wrong shift or missing return compiles silently.',
 [AT,RG],[('namespaces tc0, tc1, tcp, ei, adc, ac, twi, mem, gpio','include/mcu/atmega328.hpp')],
 None,['simulated registers against a datasheet table','read-back values'])
p('M09','EEPROM programming through the library survives power cuts',
 'A byte programmed through the library\'s EEPROM settings, with interrupts held off around the two-step enable, is written exactly once, to the addressed cell, with the chosen programming mode; when power fails at any moment every cell other than the one being programmed keeps its value, and a cell whose programming completed keeps the new one. Reading returns what the cell holds.',
 ['crash_points','schedules','histories'],
 'every power-cut instant, every address and data history, all programming modes, interrupts at any instruction',
 'No test executes the EEPROM settings; the hardware accepts a write only inside a four-cycle window.',
 [AT,RG],[('mem::eeprom program/enable/address/data settings','include/mcu/atmega328.hpp:215')],
 None,['simulated EEPROM cells across power cycles'])
p('M10','Scoped guards restore processor and interrupt state exactly',
 'Code bracketed by the scoped status-register saver leaves the status register exactly as it found it, on every path, at any nesting, wherever interrupts strike; code bracketed by the scoped interrupt guard (begun with interrupts on and not nested, as the library states) runs with no interrupt handler entering, and interrupts are enabled when the bracket is left, on every path; those that were pending are then served. Interrupted computations are therefore never corrupted by handlers using them.',
 ['schedules','programs'],
 'every interrupt placement, nested guards, handlers using the status saver with arithmetic of every flag outcome',
 'Never executed by a test; corruption of flags needs an interrupt between an arithmetic instruction and its branch.',
 [RG,AT],[('scoped_sreg','include/mcu/atmega328.hpp:95'),('scoped_interrupt_guard','include/mcu/register.hpp:518')],
 None,['simulated SREG','handler entry trace'])
p('M11','The PWM output emits only commanded duty cycles',
 'After the PWM output is initialised, every pulse on its pin has the width of some value written before, the most recent value takes effect within two PWM periods, and no write, whatever interrupts strike during it, ever produces a width that was not commanded. Initialisation configures a 10-bit, non-inverted, full-speed PWM on that pin from any prior timer state.',
 ['schedules','histories'],
 'every write time relative to the PWM period, interrupt handlers writing other 16-bit timer registers at any instruction, any prior timer configuration',
 'Needs a running 16-bit timer; the code is only compiled.',
 [AT,RG],[('tc1_pwm_on_a_pb1 init/write','include/mcu/atmega328.hpp:2603'),('atomic(dest,value)','include/mcu/register.hpp:542')],
 None,['pulse widths on simulated pin PB1'])

p('M12','An application built from the parts keeps every guarantee at once, across resets',
 'A program composed of the library\'s parts (timer tick starting conversions, converter interrupt handing samples to the main program, filters or estimator in fixed point, PWM output, two-wire reports retried until accepted, presses counted by an external interrupt, state checkpointed to EEPROM), built for speed or for size, turns every conversion into exactly one output, in order, equal to what the same filter computes off the device; keeps its tick rate while it reports and checkpoints; delivers every byte of every report exactly once; never sees a shared counter torn; and after a reset or power failure at any instruction resumes from the last completed checkpoint exactly. Output goes on within a bounded time whatever the bus refused and whichever interrupts struck.',
 ['schedules','crash_points','fault_sequences','histories'],
 'every placement of interrupts, external events, bus faults, resets and power failures over one to six lives; cascades, one-pole filters and estimators; tick, report and checkpoint rates',
 'No test composes the parts or runs them on a target; the guarantees of one part can be broken by another (interrupts held off too long, a shared register, a size-optimised build that misses a four-cycle window).',
 [AT,RG,BC,OP,K,FP],[('timer, converter, EEPROM, two-wire, external interrupt settings','include/mcu/atmega328.hpp'),('register access and write proxies','include/mcu/register.hpp:186'),('filter and estimator steps','include/dsp/biquad-cascade.hpp:190')],
 [('two checkpoint slots','all that survives a power failure','EEPROM')],['simulated PWM value and pin','two-wire transcript','EEPROM cells across failures','tick and conversion counts'])

p('M13','The shipped device programs do what they announce, from every reset',
 'The example programs for the device, built for speed or for size, started from undefined memory and reset at any instant, do what their sources announce: the delay-loop blinker changes the LED forever at an even interval of roughly 200 ms; the interrupt blinker on exactly every 1000th 1 ms tick with no tick missed; the fader steps its three PWM outputs through the whole ramp without a gap, every pulse having a commanded width, while the LED follows the sampling pin; the half-scale indicator lights the LED only on a sample above half and puts it out only on one that is not, never because of the two halves of different samples; the estimator timing loop completes an update within a bounded time, forever. Nothing else on the LED port moves and no unrequested interrupt is taken.',
 ['schedules','crash_points','inputs'],
 'every reset instant, converter phase, input signal, pin level history and memory content at power-on',
 'The programs are only compiled, never run; the failures need an interrupt between two instructions or hours of device time.',
 ['example/avr/avr-blink-led.e.cpp','example/avr/avr-blink-led-isr.e.cpp','example/avr/avr-fade-led.e.cpp','example/avr/avr-adc-isr.e.cpp','time/avr-kalman-time.cpp',MX,FP],[('tick handler','example/avr/avr-blink-led-isr.e.cpp:50'),('ramp','example/avr/avr-fade-led.e.cpp:160'),('guarded read of a shared sample','example/avr/avr-adc-isr.e.cpp:95'),('timing loop','time/avr-kalman-time.cpp:258')],
 None,['simulated pins','PWM duty registers','tick and conversion counts'])

# ---------------------------------------------------------------- not simulation targets (pure functions)
def n(id,title,statement,files,why):
    p(id,title,statement,['inputs'],'all inputs',why,files,[(title,files[0])])
n('N05','Ranges and indices enumerate exactly the half-open interval',
 'Ranges, stepped ranges and container indices yield every element of the half-open interval once, in order, and report their size consistently.',['include/core/range.hpp'],
 'Tests check small constant ranges.')
n('N06','Replacement standard-library pieces behave like the standard ones',
 'The reduced standard-library substitutes for the microcontroller give the same results as the standard facilities they stand in for.',['include/std/algorithm.hpp','include/std/utility.hpp','include/std/type_traits.hpp','include/std/limits.hpp','include/std/complex.hpp','include/std/tuple.hpp'],
 'Compile-time assertions cover a few types; complex and tuple for the target are not compiled by any test.')
n('N07','Text output shows the value it is given',
 'Streaming a matrix, fixed-point number, filter, design or vector writes each of its values once, in order, in the documented layout.',['include/num/matrix-io.hpp','include/num/fixed-point-io.hpp','include/dsp/biquad-io.hpp','include/core/vector-io.hpp'],
 'Only used for diagnostics in failing tests.')
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))

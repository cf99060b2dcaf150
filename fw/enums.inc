// Written by tools/gen_enums.py. K( setting, constant, value in the datasheet )
K( EE_MODE, mem::eeprom::program::mode::erase_write, 0 )
K( EE_MODE, mem::eeprom::program::mode::erase_only, 1 )
K( EE_MODE, mem::eeprom::program::mode::write_only, 2 )
K( EE_MODE, mem::eeprom::program::mode::reserved3, 3 )
K( EE_READY, mem::eeprom::interrupt::on_ready::off, 0 )
K( EE_READY, mem::eeprom::interrupt::on_ready::on, 1 )
K( EE_MASTER, mem::eeprom::enable::master_write::off, 0 )
K( EE_MASTER, mem::eeprom::enable::master_write::on, 1 )
K( EI_SENSE1, ei::sense::low, 0 )
K( EI_SENSE1, ei::sense::change, 1 )
K( EI_SENSE1, ei::sense::falling_edge, 2 )
K( EI_SENSE1, ei::sense::rising_edge, 3 )
K( EI_SENSE0, ei::sense::low, 0 )
K( EI_SENSE0, ei::sense::change, 1 )
K( EI_SENSE0, ei::sense::falling_edge, 2 )
K( EI_SENSE0, ei::sense::rising_edge, 3 )
K( T0_CLOCK, tc0::input::clock::none, 0 )
K( T0_CLOCK, tc0::input::clock::x1, 1 )
K( T0_CLOCK, tc0::input::clock::x8, 2 )
K( T0_CLOCK, tc0::input::clock::x64, 3 )
K( T0_CLOCK, tc0::input::clock::x256, 4 )
K( T0_CLOCK, tc0::input::clock::x1024, 5 )
K( T0_CLOCK, tc0::input::clock::ext1_falling_adge, 6 )
K( T0_CLOCK, tc0::input::clock::ext1_rising_adge, 7 )
K( T1_CLOCK, tc1::input::clock::none, 0 )
K( T1_CLOCK, tc1::input::clock::x1, 1 )
K( T1_CLOCK, tc1::input::clock::x8, 2 )
K( T1_CLOCK, tc1::input::clock::x64, 3 )
K( T1_CLOCK, tc1::input::clock::x256, 4 )
K( T1_CLOCK, tc1::input::clock::x1024, 5 )
K( T1_CLOCK, tc1::input::clock::ext1_falling_adge, 6 )
K( T1_CLOCK, tc1::input::clock::ext1_rising_adge, 7 )
K( T0_WAVE, tc0::output::waveform::normal, 0 )
K( T0_WAVE, tc0::output::waveform::pwm_phase_correct, 1 )
K( T0_WAVE, tc0::output::waveform::ctc_ocr0a, 2 )
K( T0_WAVE, tc0::output::waveform::ctc, 2 )
K( T0_WAVE, tc0::output::waveform::fast_pwm, 3 )
K( T0_WAVE, tc0::output::waveform::reserved4, 4 )
K( T0_WAVE, tc0::output::waveform::pwm_phase_correct_ocr0a, 5 )
K( T0_WAVE, tc0::output::waveform::reserved6, 6 )
K( T0_WAVE, tc0::output::waveform::fast_pwm_ocr0a, 7 )
K( T1_WAVE, tc1::output::waveform::normal, 0 )
K( T1_WAVE, tc1::output::waveform::pwm_phase_correct_8bit, 1 )
K( T1_WAVE, tc1::output::waveform::pwm_phase_correct_9bit, 2 )
K( T1_WAVE, tc1::output::waveform::pwm_phase_correct_10bit, 3 )
K( T1_WAVE, tc1::output::waveform::ctc_ocr1a, 4 )
K( T1_WAVE, tc1::output::waveform::fast_pwm_phase_correct_8bit, 5 )
K( T1_WAVE, tc1::output::waveform::fast_pwm_phase_correct_9bit, 6 )
K( T1_WAVE, tc1::output::waveform::fast_pwm_phase_correct_10bit, 7 )
K( T1_WAVE, tc1::output::waveform::pwm_phase_frequency_correct_icr1, 8 )
K( T1_WAVE, tc1::output::waveform::pwm_phase_frequency_correct_ocr1a, 9 )
K( T1_WAVE, tc1::output::waveform::pwm_phase_correct_icr1, 10 )
K( T1_WAVE, tc1::output::waveform::pwm_phase_correct_ocr1a, 11 )
K( T1_WAVE, tc1::output::waveform::ctc_icr1, 12 )
K( T1_WAVE, tc1::output::waveform::reserved13, 13 )
K( T1_WAVE, tc1::output::waveform::fast_pwm_icr1, 14 )
K( T1_WAVE, tc1::output::waveform::fast_pwm_ocr1a, 15 )
K( T0_MODEA, tc0::output::a::mode::none, 0 )
K( T0_MODEA, tc0::output::a::mode::toggle, 1 )
K( T0_MODEA, tc0::output::a::mode::clear, 2 )
K( T0_MODEA, tc0::output::a::mode::set, 3 )
K( T0_MODEB, tc0::output::b::mode::none, 0 )
K( T0_MODEB, tc0::output::b::mode::toggle, 1 )
K( T0_MODEB, tc0::output::b::mode::clear, 2 )
K( T0_MODEB, tc0::output::b::mode::set, 3 )
K( T0_IEA, tc0::enable::interrupt::on::match_a::off, 0 )
K( T0_IEA, tc0::enable::interrupt::on::match_a::on, 1 )
K( T0_IEB, tc0::enable::interrupt::on::match_b::off, 0 )
K( T0_IEB, tc0::enable::interrupt::on::match_b::on, 1 )
K( T0_IEO, tc0::enable::interrupt::on::overflow::off, 0 )
K( T0_IEO, tc0::enable::interrupt::on::overflow::on, 1 )
K( T1_MODEA, tc1::output::a::mode::none, 0 )
K( T1_MODEA, tc1::output::a::mode::toggle, 1 )
K( T1_MODEA, tc1::output::a::mode::clear, 2 )
K( T1_MODEA, tc1::output::a::mode::set, 3 )
K( T1_MODEB, tc1::output::b::mode::none, 0 )
K( T1_MODEB, tc1::output::b::mode::toggle, 1 )
K( T1_MODEB, tc1::output::b::mode::clear, 2 )
K( T1_MODEB, tc1::output::b::mode::set, 3 )
K( T1_IEA, tc1::enable::interrupt::on::match_a::off, 0 )
K( T1_IEA, tc1::enable::interrupt::on::match_a::on, 1 )
K( T1_IEB, tc1::enable::interrupt::on::match_b::off, 0 )
K( T1_IEB, tc1::enable::interrupt::on::match_b::on, 1 )
K( T1_IEO, tc1::enable::interrupt::on::overflow::off, 0 )
K( T1_IEO, tc1::enable::interrupt::on::overflow::on, 1 )
K( T1_IEC, tc1::enable::interrupt::on::capture::off, 0 )
K( T1_IEC, tc1::enable::interrupt::on::capture::on, 1 )
K( T1_EDGE, tc1::input::capture::edge::falling, 0 )
K( T1_EDGE, tc1::input::capture::edge::rising, 1 )
K( GT_SYNC, tcp::synchronization::off, 0 )
K( GT_SYNC, tcp::synchronization::on, 1 )
K( GT_RES2, tcp::reset::prescaler::tc2::off, 0 )
K( GT_RES2, tcp::reset::prescaler::tc2::on, 1 )
K( GT_RES01, tcp::reset::prescaler::tc01::off, 0 )
K( GT_RES01, tcp::reset::prescaler::tc01::on, 1 )
K( TW_ENABLE, twi::enable::interface::off, 0 )
K( TW_ENABLE, twi::enable::interface::on, 1 )
K( TW_IE, twi::enable::interrupt::off, 0 )
K( TW_IE, twi::enable::interrupt::on, 1 )
K( TW_CALL, twi::enable::general_call::off, 0 )
K( TW_CALL, twi::enable::general_call::on, 1 )
K( TW_PRE, twi::control::prescale::factor::x1, 0 )
K( TW_PRE, twi::control::prescale::factor::x4, 1 )
K( TW_PRE, twi::control::prescale::factor::x16, 2 )
K( TW_PRE, twi::control::prescale::factor::x64, 3 )
K( AC_DIS, ac::disable::analog::comparator::off, 0 )
K( AC_DIS, ac::disable::analog::comparator::on, 1 )
K( AC_BG, ac::input::select::bandgap_ref::off, 0 )
K( AC_BG, ac::input::select::bandgap_ref::on, 1 )
K( AC_IE, ac::enable::interrupt::off, 0 )
K( AC_IE, ac::enable::interrupt::on, 1 )
K( AC_CAPT, ac::enable::input::capture::off, 0 )
K( AC_CAPT, ac::enable::input::capture::on, 1 )
K( AC_ON, ac::output::interrupt::on::toggle, 0 )
K( AC_ON, ac::output::interrupt::on::reserved1, 1 )
K( AC_ON, ac::output::interrupt::on::falling_edge, 2 )
K( AC_ON, ac::output::interrupt::on::rising_edge, 3 )
K( AD_REF, adc::input::reference::aref, 0 )
K( AD_REF, adc::input::reference::avcc, 1 )
K( AD_REF, adc::input::reference::reserved, 2 )
K( AD_REF, adc::input::reference::intern_1v1, 3 )
K( AD_ADJ, adc::conversion::adjustment::right, 0 )
K( AD_ADJ, adc::conversion::adjustment::left, 1 )
K( AD_CHAN, adc::input::channel::ch0, 0 )
K( AD_CHAN, adc::input::channel::ch1, 1 )
K( AD_CHAN, adc::input::channel::ch2, 2 )
K( AD_CHAN, adc::input::channel::ch3, 3 )
K( AD_CHAN, adc::input::channel::ch4, 4 )
K( AD_CHAN, adc::input::channel::ch5, 5 )
K( AD_CHAN, adc::input::channel::ch6, 6 )
K( AD_CHAN, adc::input::channel::ch7, 7 )
K( AD_CHAN, adc::input::channel::ch8, 8 )
K( AD_CHAN, adc::input::channel::reserved9, 9 )
K( AD_CHAN, adc::input::channel::reserved10, 10 )
K( AD_CHAN, adc::input::channel::reserved11, 11 )
K( AD_CHAN, adc::input::channel::reserved12, 12 )
K( AD_CHAN, adc::input::channel::reserved13, 13 )
K( AD_CHAN, adc::input::channel::internal_1v1, 14 )
K( AD_CHAN, adc::input::channel::gnd, 15 )
K( AD_ENABLE, adc::enable::adc::off, 0 )
K( AD_ENABLE, adc::enable::adc::on, 1 )
K( AD_AUTO, adc::enable::auto_trigger::off, 0 )
K( AD_AUTO, adc::enable::auto_trigger::on, 1 )
K( AD_IE, adc::enable::interrupt::off, 0 )
K( AD_IE, adc::enable::interrupt::on, 1 )
K( AD_COMP, adc::enable::comparator::off, 0 )
K( AD_COMP, adc::enable::comparator::on, 1 )
K( AD_PRE, adc::prescale::factor::x02, 0 )
K( AD_PRE, adc::prescale::factor::x2, 1 )
K( AD_PRE, adc::prescale::factor::x4, 2 )
K( AD_PRE, adc::prescale::factor::x8, 3 )
K( AD_PRE, adc::prescale::factor::x16, 4 )
K( AD_PRE, adc::prescale::factor::x32, 5 )
K( AD_PRE, adc::prescale::factor::x64, 6 )
K( AD_PRE, adc::prescale::factor::x128, 7 )
K( AD_TRIG, adc::trigger::on::free_run, 0 )
K( AD_TRIG, adc::trigger::on::ac, 1 )
K( AD_TRIG, adc::trigger::on::ei0, 2 )
K( AD_TRIG, adc::trigger::on::tc0_match_a, 3 )
K( AD_TRIG, adc::trigger::on::tc0_overflow, 4 )
K( AD_TRIG, adc::trigger::on::tc1_match_b, 5 )
K( AD_TRIG, adc::trigger::on::tc1_overflow, 6 )
K( AD_TRIG, adc::trigger::on::tc1_capture_event, 7 )
